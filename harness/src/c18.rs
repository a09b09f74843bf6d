use crate::ctx::*;
#[cfg(feature = "ffi")]
#[allow(warnings)]
#[path = "/repo/storm-ffi/src/lib.rs"]
pub mod ffi;

#[cfg(not(feature = "ffi"))]
pub fn run(c: &mut Ctx) { c.notes.push("storm-ffi source did not compile into the harness; nothing ran".into()); }

#[cfg(feature = "ffi")]
pub use imp::run;
#[cfg(feature = "ffi")]
mod imp {
    use super::ffi::*;
    use crate::ctx::*;
    use crate::mpq::data;
    use libc::{c_char, c_void};
    use mopaq::{ArchiveBuilder, FormatVersion, ListfileOption};
    use std::collections::BTreeMap;
    use std::ffi::CString;
    use std::ptr::null_mut;

    const BAD_HANDLE: u32 = 6;
    const BAD_PARAM: u32 = 87;
    const SMALL: u32 = 122;
    const UNSUPPORTED: u32 = 50;
    const CANARY: u8 = 0xC7;
    #[derive(Clone)]
    struct File { arch: usize, name: String, data: Vec<u8>, pos: u64 }
    struct Model { archives: BTreeMap<usize, usize>, files: BTreeMap<usize, File>, dead: Vec<usize>, used: Vec<usize> }
    fn h(x: usize) -> HANDLE { x as HANDLE }
    fn err() -> u32 { SFileGetLastError() }

    /// archives the sequences work on
    struct World { path: Vec<String>, files: Vec<Vec<(String, Vec<u8>)>> }
    fn world(r: &mut Rng) -> World {
        let mut w = World { path: vec![], files: vec![] };
        for (i, v) in [FormatVersion::V1, FormatVersion::V2, FormatVersion::V4].into_iter().enumerate() {
            let p = format!("c18_{}.mpq", i);
            let mut b = ArchiveBuilder::new().version(v).block_size(0).generate_crcs(i == 1).listfile_option(ListfileOption::Generate);
            let mut fs = vec![];
            for (j, l) in [0usize, 1, 7, 511, 512, 513, 3000, 40].into_iter().enumerate() {
                let d = if j == 7 { (0..40u8).collect() } else { data(r, l) };
                let n = format!("dir{}\\file{}.bin", i, j);
                b = if j % 3 == 2 { b.add_file_data_with_encryption(d.clone(), &n, 2, j % 2 == 0, 0) } else { b.add_file_data_with_options(d.clone(), &n, [0u8, 2, 0x10][j % 3], false, 0) };
                fs.push((n, d));
            }
            b.build(&p).expect("build");
            w.path.push(p); w.files.push(fs);
        }
        w
    }
    /// a buffer with guard bytes around the part handed out
    struct Guard { v: Vec<u8>, n: usize, off: usize }
    impl Guard {
        fn new(n: usize, off: usize) -> Self { Guard { v: vec![CANARY; n + 64 + off], n, off } }
        fn ptr(&mut self) -> *mut c_void { unsafe { self.v.as_mut_ptr().add(32 + self.off) as *mut c_void } }
        fn body(&self) -> &[u8] { &self.v[32 + self.off..32 + self.off + self.n] }
        fn clean(&self, written: usize) -> Chk {
            ensure(self.v[..32 + self.off].iter().all(|x| *x == CANARY), || "wrote before the buffer".into())?;
            ensure(self.v[32 + self.off + self.n..].iter().all(|x| *x == CANARY), || "wrote past the end of the buffer".into())?;
            ensure(self.body()[written..].iter().all(|x| *x == CANARY), || format!("wrote into the buffer beyond the {} bytes reported", written))
        }
    }
    struct Reent { arch: usize, seen: Vec<String>, stop: usize, problems: Vec<String>, file: String }
    extern "C" fn cb(name: *const c_char, user: *mut c_void) -> bool {
        let s = unsafe { &mut *(user as *mut Reent) };
        let n = unsafe { std::ffi::CStr::from_ptr(name) }.to_string_lossy().into_owned();
        s.seen.push(n);
        // calling back into the API from the callback
        unsafe {
            let cn = CString::new(s.file.as_str()).unwrap();
            if !SFileHasFile(h(s.arch), cn.as_ptr()) { s.problems.push("SFileHasFile from the callback failed".into()); }
            let mut f: HANDLE = null_mut();
            if SFileOpenFileEx(h(s.arch), cn.as_ptr(), 0, &mut f) { SFileCloseFile(f); } else { s.problems.push("SFileOpenFileEx from the callback failed".into()); }
        }
        s.seen.len() < s.stop
    }

    fn step(r: &mut Rng, m: &mut Model, w: &World, log: &std::cell::RefCell<Vec<String>>) -> Chk {
        let pick_any = |r: &mut Rng, m: &Model| -> usize {
            let f: Vec<usize> = m.files.keys().copied().collect(); let a: Vec<usize> = m.archives.keys().copied().collect();
            match r.below(20) { 0 => 0, 1 if !m.dead.is_empty() => r.pick(&m.dead), 2 => 1_000_000 + r.below(1000) as usize, 3 if !a.is_empty() => r.pick(&a), 4 => usize::MAX - r.below(3) as usize, _ => if f.is_empty() { 0 } else { r.pick(&f) } }
        };
        let pick_arch = |r: &mut Rng, m: &Model| -> usize {
            let f: Vec<usize> = m.files.keys().copied().collect(); let a: Vec<usize> = m.archives.keys().copied().collect();
            match r.below(14) { 0 => 0, 1 if !m.dead.is_empty() => r.pick(&m.dead), 2 => 1_000_000 + r.below(1000) as usize, 3 if !f.is_empty() => r.pick(&f), _ => if a.is_empty() { 0 } else { r.pick(&a) } }
        };
        let op = r.below(33);
        SFileSetLastError(777);
        unsafe { match op {
            0 | 1 if m.archives.len() < 4 => {
                let i = r.below(w.path.len() as u64) as usize; let p = CString::new(w.path[i].as_str()).unwrap(); let mut out: HANDLE = null_mut();
                log.borrow_mut().push(format!("SFileOpenArchive({})", w.path[i]));
                ensure(SFileOpenArchive(p.as_ptr(), 0, 0, &mut out), || format!("refused, error {}", err()))?;
                eq("last error", &err(), &0)?;
                let id = out as usize;
                ensure(id != 0 && !m.used.contains(&id), || format!("handle {} is null or was given out before", id))?;
                m.used.push(id); m.archives.insert(id, i);
            }
            2..=6 => {
                let a = pick_arch(r, m);
                let i = m.archives.get(&a).copied(); let fs = &w.files[i.unwrap_or(0)];
                let (n, d) = fs[r.below(fs.len() as u64) as usize].clone();
                let missing = r.below(10) == 0; let nm = if missing { "no such file".to_string() } else { n.clone() };
                log.borrow_mut().push(format!("SFileOpenFileEx({}, {})", a, nm));
                let cn = CString::new(nm.as_str()).unwrap(); let mut out: HANDLE = h(usize::MAX / 2);
                let ok = SFileOpenFileEx(h(a), cn.as_ptr(), 0, &mut out);
                match (i, missing) {
                    (None, _) => { eq("opened on an invalid archive handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; }
                    (Some(_), true) => { eq("opened a missing file", &ok, &false)?; eq("last error", &err(), &2)?; }
                    (Some(_), false) => { ensure(ok, || format!("refused, error {}", err()))?; let id = out as usize; ensure(id != 0 && !m.used.contains(&id), || format!("handle {} is null or was given out before", id))?; m.used.push(id); m.files.insert(id, File { arch: a, name: nm, data: d, pos: 0 }); }
                }
            }
            7..=13 => {
                let f = pick_any(r, m);
                let size = m.files.get(&f).map_or(10, |x| x.data.len());
                let n = match r.below(8) { 0 => 0, 1 => 1, 2 => size as u64, 3 => size as u64 + 5, 4 => r.below(size as u64 + 10), _ => r.below(64) } as u32;
                let want_count = r.below(5) != 0; let off = r.below(8) as usize;
                log.borrow_mut().push(format!("SFileReadFile({}, {} bytes, count {})", f, n, want_count));
                let mut g = Guard::new(n as usize, off); let mut cnt = 0xDEAD_BEEFu32;
                let p = g.ptr();
                let ok = SFileReadFile(h(f), p, n, if want_count { &mut cnt } else { null_mut() }, null_mut());
                match m.files.get_mut(&f) {
                    None => { eq("read on an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; g.clean(0)?; if want_count { eq("count left alone or zero", &(cnt == 0xDEAD_BEEF || cnt == 0), &true)?; } }
                    Some(x) => {
                        let from = x.pos as usize; let k = (n as usize).min(x.data.len() - from);
                        ensure(ok, || format!("read refused, error {}", err()))?; eq("last error", &err(), &0)?;
                        if want_count { eq("bytes reported", &cnt, &(k as u32))?; }
                        eq_bytes("bytes read", &g.body()[..k], &x.data[from..from + k])?;
                        g.clean(k)?;
                        x.pos += k as u64;
                    }
                }
            }
            14..=19 => {
                let f = pick_any(r, m);
                let (size, pos) = m.files.get(&f).map_or((10, 0), |x| (x.data.len() as i64, x.pos as i64));
                let method = match r.below(16) { 0 => 3 + r.below(4) as u32, 1 => u32::MAX, x => (x % 3) as u32 };
                let off: i64 = match r.below(10) { 0 => 0, 1 => size, 2 => -size, 3 => size + r.below(10) as i64, 4 => -pos, 5 => -pos - 1, 6 => -size - 1, 7 => r.edge64() as i64, 8 => r.edge32() as i32 as i64, _ => r.below(2 * size as u64 + 2) as i64 - size };
                let wide = r.bool(); let lo = off as i32; let mut hi = (off >> 32) as i32; let hi0 = hi;
                let eff = if wide { off } else { lo as i64 };
                log.borrow_mut().push(format!("SFileSetFilePointer({}, {}, {}, method {})", f, lo, if wide { format!("high {}", hi) } else { "no high".into() }, method));
                let ret = SFileSetFilePointer(h(f), lo, if wide { &mut hi } else { null_mut() }, method);
                match m.files.get_mut(&f) {
                    None => { eq("seek on an invalid handle", &ret, &u32::MAX)?; eq("last error", &err(), &BAD_HANDLE)?; }
                    Some(x) => {
                        let base: i128 = match method { 0 => 0, 1 => x.pos as i128, 2 => x.data.len() as i128, _ => i128::MIN / 4 };
                        let t = base + eff as i128;
                        if t < 0 { eq("seek before the start, or by an unknown method", &ret, &u32::MAX)?; eq("last error", &err(), &BAD_PARAM)?; if wide { eq("high word after a refused seek", &hi, &hi0)?; } }
                        else { x.pos = t.min(x.data.len() as i128) as u64; eq("position returned", &ret, &(x.pos as u32))?; if wide { eq("high word returned", &hi, &((x.pos >> 32) as i32))?; } eq("last error", &err(), &0)?; }
                    }
                }
            }
            20 | 21 => {
                let f = pick_any(r, m); let wide = r.bool(); let mut hi = 99u32;
                log.borrow_mut().push(format!("SFileGetFileSize({})", f));
                let s = SFileGetFileSize(h(f), if wide { &mut hi } else { null_mut() });
                match m.files.get(&f) { None => { eq("size of an invalid handle", &s, &u32::MAX)?; eq("last error", &err(), &BAD_HANDLE)?; } Some(x) => { eq("size", &s, &(x.data.len() as u32))?; if wide { eq("high word", &hi, &0)?; } eq("last error", &err(), &0)?; } }
            }
            22..=24 => {
                let f = pick_any(r, m); let class = match r.below(6) { 0 => r.below(14) as u32, 1 => 7, 2 => r.range(1, 4) as u32, _ => 10 }; let n = r.below(13) as u32; let off = r.below(8) as usize; let wn = r.bool(); let mut need = 0u32;
                let null = r.below(8) == 0;
                log.borrow_mut().push(format!("SFileGetFileInfo({}, class {}, {} bytes, null {})", f, class, n, null));
                let mut g = Guard::new(n as usize, off); let p = if null { null_mut() } else { g.ptr() };
                let ok = SFileGetFileInfo(h(f), class, p, n, if wn { &mut need } else { null_mut() });
                if null && n > 0 { eq("null buffer with a size", &ok, &false)?; eq("last error", &err(), &BAD_PARAM)?; return Ok(()); }
                let val: Option<(u64, usize)> = if let Some(x) = m.files.get(&f) { match class { 7 => Some((x.data.len() as u64, 8)), 10 => Some((x.pos, 8)), _ => None } }
                    else if let Some(i) = m.archives.get(&f) { let len = std::fs::metadata(&w.path[*i]).unwrap().len(); match class { 1 => Some((len, 8)), 2 => Some((32, 4)), 3 => Some((9, 4)), 4 => Some((512, 4)), _ => None } }
                    else { eq("info of an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; return g.clean(0); };
                match val {
                    None => { eq("unknown class", &ok, &false)?; eq("last error", &err(), &UNSUPPORTED)?; g.clean(0)?; }
                    Some((v, k)) => {
                        if wn { eq("size needed", &need, &(k as u32))?; }
                        if (n as usize) < k { eq("buffer too small", &ok, &false)?; eq("last error", &err(), &SMALL)?; g.clean(0)?; }
                        else { ensure(ok, || format!("refused, error {}", err()))?; eq_bytes("value", &g.body()[..k], &v.to_le_bytes()[..k])?; g.clean(k)?; eq("last error", &err(), &0)?; }
                    }
                }
            }
            25 => {
                let f = pick_any(r, m);
                log.borrow_mut().push(format!("SFileCloseFile({})", f));
                let ok = SFileCloseFile(h(f)); let was = m.files.remove(&f).is_some();
                eq("closed", &ok, &was)?; eq("last error", &err(), &if was { 0 } else { BAD_HANDLE })?; if was { m.dead.push(f); }
            }
            26 if r.below(3) == 0 => {
                let a = pick_arch(r, m);
                log.borrow_mut().push(format!("SFileCloseArchive({})", a));
                let ok = SFileCloseArchive(h(a)); let was = m.archives.remove(&a).is_some();
                eq("closed", &ok, &was)?; eq("last error", &err(), &if was { 0 } else { BAD_HANDLE })?;
                if was { m.dead.push(a); let gone: Vec<usize> = m.files.iter().filter(|(_, f)| f.arch == a).map(|(k, _)| *k).collect(); for g in gone { m.files.remove(&g); m.dead.push(g); } }
            }
            27 => {
                let a = pick_arch(r, m); let f = pick_any(r, m);
                let n = r.below(24) as u32;
                log.borrow_mut().push(format!("SFileGetArchiveName({}, {} bytes), SFileGetFileName({})", a, n, f));
                let mut g = Guard::new(n as usize, 0); let p = g.ptr();
                let ok = SFileGetArchiveName(h(a), p as *mut c_char, n);
                if n == 0 { eq("empty buffer", &ok, &false)?; eq("last error", &err(), &BAD_PARAM)?; }
                else { match m.archives.get(&a) { None => { eq("name of an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; g.clean(0)?; }
                    Some(i) => { let s = &w.path[*i]; if s.len() + 1 > n as usize { eq("buffer too small", &ok, &false)?; eq("last error", &err(), &SMALL)?; g.clean(0)?; } else { ensure(ok, || "refused".into())?; eq_bytes("name", &g.body()[..s.len()], s.as_bytes())?; eq("terminator", &g.body()[s.len()], &0)?; g.clean(s.len() + 1)?; } } } }
                let mut g = Guard::new(128, 0); let p = g.ptr();
                SFileSetLastError(777);
                let ok = SFileGetFileName(h(f), p as *mut c_char);
                match m.files.get(&f) { None => { eq("name of an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; g.clean(0)?; } Some(x) => { ensure(ok, || "refused".into())?; eq_bytes("name", &g.body()[..x.name.len()], x.name.as_bytes())?; g.clean(x.name.len() + 1)?; } }
            }
            28 => {
                let a = pick_arch(r, m); let i = m.archives.get(&a).copied();
                let stop = r.range(1, 12) as usize;
                log.borrow_mut().push(format!("SFileEnumFiles({}) with a callback that opens and closes a file, stopping after {}", a, stop));
                let mut s = Reent { arch: a, seen: vec![], stop, problems: vec![], file: w.files[i.unwrap_or(0)][1].0.clone() };
                let ok = SFileEnumFiles(h(a), std::ptr::null(), std::ptr::null(), Some(cb), &mut s as *mut _ as *mut c_void);
                match i { None => { eq("enumerated an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; }
                    Some(i) => { ensure(ok, || "refused".into())?; ensure(s.problems.is_empty(), || format!("{:?}", s.problems))?; let mut want: Vec<String> = w.files[i].iter().map(|x| x.0.clone()).collect(); want.push("(listfile)".into()); want.truncate(stop); eq("names", &s.seen, &want)?; } }
            }
            29 => {
                let a = pick_arch(r, m); let fl = r.pick(&[0u32, 0x10, 0x20, 0x30, 0xFF]);
                log.borrow_mut().push(format!("SFileVerifyArchive({}, {:#x})", a, fl));
                let ok = SFileVerifyArchive(h(a), fl);
                match m.archives.get(&a) { None => { eq("verified an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; } Some(i) => {
                    ensure(ok, || format!("an intact archive was refused, error {}", err()))?;
                    let n = CString::new(w.files[*i][r.below(7) as usize].0.as_str()).unwrap();
                    log.borrow_mut().push(format!("SFileVerifyFile({}, {:?})", a, n));
                    ensure(SFileVerifyFile(h(a), n.as_ptr(), 0), || format!("an intact file was refused, error {}", err()))?;
                } }
            }
            30 => {
                let a = pick_arch(r, m); let i = m.archives.get(&a).copied(); let fs = &w.files[i.unwrap_or(0)];
                let (n, d) = fs[r.below(fs.len() as u64) as usize].clone();
                let missing = r.below(8) == 0; let nm = if missing { "no such file".to_string() } else { n.clone() };
                let to = r.pick(&["c18.x", "c18.d/a/b", "c18.d/a/c", "c18.dir"]);
                let _ = std::fs::create_dir_all("c18.dir"); if r.bool() { let _ = std::fs::write("c18.x", vec![7u8; 5000]); } if r.below(4) == 0 { let _ = std::fs::remove_dir_all("c18.d"); }
                let before = std::fs::read(to).ok();
                log.borrow_mut().push(format!("SFileExtractFile({}, {}, {})", a, nm, to));
                let (cn, ct) = (CString::new(nm.as_str()).unwrap(), CString::new(to).unwrap());
                let nul = r.below(10); let ok = SFileExtractFile(h(a), if nul == 0 { null_mut() } else { cn.as_ptr() }, if nul == 1 { null_mut() } else { ct.as_ptr() }, 0);
                let now = std::fs::read(to).ok();
                if nul < 2 { eq("extracted with a null name", &ok, &false)?; eq("last error", &err(), &BAD_PARAM)?; }
                else { match (i, missing) {
                    (None, _) => { eq("extracted from an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; }
                    (Some(_), true) => { eq("extracted a missing file", &ok, &false)?; eq("last error", &err(), &2)?; }
                    (Some(_), false) if to == "c18.dir" => { eq("extracted over a directory", &ok, &false)?; ensure(err() != 0, || "no error is set".into())?; }
                    (Some(_), false) => { ensure(ok, || format!("refused, error {}", err()))?; eq("last error", &err(), &0)?; eq_bytes("file written", &now.clone().ok_or("no file was written")?, &d)?; }
                } }
                if !ok { ensure(now == before, || "a refused extraction changed the destination".into())?; }
            }
            31 => {
                let a = pick_arch(r, m); let i = m.archives.get(&a).copied(); let fs = &w.files[i.unwrap_or(0)];
                let n = &fs[r.below(fs.len() as u64) as usize].0; let k = r.below(n.len() as u64 + 1) as usize; let e = r.range(k as u64, n.len() as u64) as usize;
                let part = if n.is_char_boundary(k) && n.is_char_boundary(e) { n[k..e].to_string() } else { n.clone() };
                let mask = match r.below(4) { 0 => "*".into(), 1 => format!("*{}*", part), 2 => format!("{}*", part), _ => part.clone() };
                let stop = r.range(1, 12) as usize;
                log.borrow_mut().push(format!("SFileEnumFiles({}, {:?}) stopping after {}", a, mask, stop));
                let mut s = Reent { arch: a, seen: vec![], stop, problems: vec![], file: w.files[i.unwrap_or(0)][1].0.clone() };
                let cm = CString::new(mask.as_str()).unwrap();
                let ok = SFileEnumFiles(h(a), cm.as_ptr(), std::ptr::null(), Some(cb), &mut s as *mut _ as *mut c_void);
                match i { None => { eq("enumerated an invalid handle", &ok, &false)?; eq("last error", &err(), &BAD_HANDLE)?; }
                    Some(i) => { ensure(ok, || "refused".into())?; eq("last error", &err(), &0)?;
                        let mut want: Vec<String> = w.files[i].iter().map(|x| x.0.clone()).collect(); want.push("(listfile)".into());
                        want.retain(|x| mask == "*" || x.contains(&mask.replace('*', ""))); want.truncate(stop);
                        eq("names passed to the callback", &s.seen, &want)?; } }
                SFileSetLastError(777);
                eq("enumeration without a callback", &SFileEnumFiles(h(a), cm.as_ptr(), std::ptr::null(), None, null_mut()), &false)?; eq("last error", &err(), &BAD_PARAM)?;
            }
            _ => {
                let f = pick_any(r, m);
                log.borrow_mut().push(format!("SFileReadFile({}, null)", f));
                eq("null buffer", &SFileReadFile(h(f), null_mut(), 5, null_mut(), null_mut()), &false)?; eq("last error", &err(), &BAD_PARAM)?;
            }
        } }
        Ok(())
    }
    pub fn run(c: &mut Ctx) {
        c.bound("call sequences of up to 160 calls on up to four open archives (versions 1, 2, 4) and any number of file handles; files of 0..=3000 bytes; reads of 0..=file+5 bytes into guarded buffers at odd addresses; 64-bit seek offsets of all magnitudes; closed, foreign and invented handles; one thread");
        let mut r = c.rng("c18");
        c.journal = true;
        let w = world(&mut r);
        let n = c.n(6000, 60000);
        for it in 0..n { if c.out_of_time() { break; }
            let len = r.range(5, 160); let seed = r.next();
            let log = std::cell::RefCell::new(vec![]);
            c.case("sequence", &|| { let l = log.borrow(); if l.is_empty() { format!("sequence {} of {} calls", it, len) } else { l.join("; ") } }, || {
                let mut r = Rng::new(seed); let mut m = Model { archives: Default::default(), files: Default::default(), dead: vec![], used: vec![] };
                let res = (|| { for k in 0..len { step(&mut r, &mut m, &w, &log).map_err(|e| format!("call {}: {}", k, e))?; }
                    // what every live handle still says
                    for (f, x) in &m.files { let mut b = vec![0u8; x.data.len() + 1]; let mut k = 0; ensure(unsafe { SFileReadFile(h(*f), b.as_mut_ptr() as *mut c_void, b.len() as u32, &mut k, null_mut()) }, || format!("handle {} no longer reads", f))?; eq_bytes(&format!("rest of handle {}", f), &b[..k as usize], &x.data[x.pos as usize..])?; }
                    Ok(()) })();
                let live: Vec<usize> = m.archives.keys().copied().collect();
                for a in &live { SFileCloseArchive(h(*a)); }
                if res.is_ok() { for f in m.files.keys() { ensure(!SFileCloseFile(h(*f)), || format!("file handle {} outlived its archive", f))?; } }
                res
            });
        }
        for p in &w.path { let _ = std::fs::remove_file(p); }
    }
}
