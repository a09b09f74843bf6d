use crate::ctx::*;
use crate::mpq::*;
use mopaq::{ArchiveBuilder, FormatVersion, ListfileOption};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// components of a stored name on this platform, without the ones that could lead out of a directory
fn parts(n: &str) -> Vec<&str> { n.split('/').filter(|p| !p.is_empty() && *p != "." && *p != "..").collect() }
/// every file below `d` with its content (None for a directory), as a path relative to `d`
fn tree(d: &Path, rel: &str, skip: &str, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
    let mut es: Vec<_> = std::fs::read_dir(d).map(|i| i.flatten().collect()).unwrap_or_default();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let n = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { n.clone() } else { format!("{}/{}", rel, n) };
        if r == skip { continue; }
        if e.path().is_dir() { out.insert(r.clone(), None); tree(&e.path(), &r, skip, out); } else { out.insert(r, std::fs::read(e.path()).ok()); }
    }
}
pub fn run(c: &mut Ctx) {
    c.bound("the storm-cli binary built from the working tree, run on archives of up to 8 files whose names mix parent components (up to 6), current-directory components, absolute paths, drive prefixes, repeated and both kinds of slashes; whole-archive and single-file extraction, with and without directory structure; every effect confined to a scratch directory");
    let Ok(bin) = std::env::var("VP_CLI_BIN") else { c.notes.push("storm-cli binary not available: nothing evaluated".into()); return };
    let mut r = c.rng("c19");
    let root = std::env::current_dir().unwrap().join("c19");
    let abs = root.to_string_lossy().into_owned();
    let n = c.n(900, 8000);
    for it in 0..n { if c.out_of_time() { break; }
        let _ = std::fs::remove_dir_all(&root);
        let work = root.join("d1/d2/d3/d4/d5/d6/d7/d8/work");
        std::fs::create_dir_all(&work).unwrap();
        std::fs::create_dir_all(root.join("d1/d2/d3/d4/d5/d6/d7/d8/outside")).unwrap();
        let outname = r.pick(&["out", "o1/o2", "./out", "out/"]);
        let segs = ["a", "b.txt", "dir", "..", "..", ".", "x y", "...", "..a", "a..", "C:", "é", "deep", "..\\..", "\\", "b\\c", "..\\esc", "con", "~", "$HOME", "%2e%2e"];
        let k = r.range(1, 8) as usize;
        let mut names: Vec<String> = vec![]; let mut seen = BTreeSet::new();
        for _ in 0..k {
            let m = r.range(1, 7); let mut s = String::new(); let mut ups = 0;
            for j in 0..m {
                let mut g = r.pick(&segs); if r.below(3) == 0 { g = r.pick(&["a", "b", "c", "dir", "f1", "f2"]); }
                if g.starts_with("..") { ups += 1; if ups > 4 { g = "z"; } }
                if j > 0 { s += r.pick(&["/", "/", "/", "//", "\\"]); }
                s += g;
            }
            match r.below(6) { 0 => s = format!("{}/{}", abs, s), 1 => s = format!("{}/d1/outside-{}/{}", abs, it, s), 2 => s = format!("C:\\{}", s), 3 if r.bool() => s = format!("./{}", s), _ => {} }
            if r.below(8) == 0 { s += "/"; }
            if r.below(3) != 0 { s += &format!("{}", r.below(100)); }
            let mut s = s.trim().to_string();
            // surrounding blanks belong to the name, but a list cannot carry them
            if it % 4 == 3 && r.below(4) == 0 { s = match r.below(3) { 0 => format!("{} ", s), 1 => format!(" {}", s), _ => format!("{}\u{2003}", s) }; }
            if s.is_empty() || s.starts_with('-') || s.starts_with('#') || s.starts_with('(') { continue; }
            if seen.insert(canon(&s)) { names.push(s); }
        }
        if names.is_empty() { continue; }
        let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(it % 4) as usize];
        let mut b = ArchiveBuilder::new().version(v).listfile_option(ListfileOption::Generate);
        let contents: Vec<Vec<u8>> = (0..names.len()).map(|i| { let l = r.below(40) as usize; let mut d = vec![i as u8 + 1]; d.extend(r.bytes(l)); d }).collect();
        for (n, d) in names.iter().zip(&contents) { b = b.add_file_data_with_options(d.clone(), n, 0, false, 0); }
        let mpq = root.join("d1/a.mpq");
        b.build(&mpq).expect("building the test archive");
        let keep = r.bool(); let single = it % 4 == 3; let which = r.below(names.len() as u64) as usize;
        let outdir: PathBuf = if single { work.clone() } else { work.join(outname) };
        let relout = outdir.components().as_path().strip_prefix(&root).unwrap().to_string_lossy().trim_end_matches('/').replace("/./", "/");
        // the output directory itself (and its parents) may be created
        let mut before = BTreeMap::new(); std::fs::create_dir_all(&outdir).unwrap(); tree(&root, "", &relout, &mut before);
        let shown = names.clone();
        c.case(if single { "single file" } else { "whole archive" }, &|| format!("{:?} keep_structure={} output={:?} names={:?}{}", v, keep, outname, shown, if single { format!(" extracting {:?}", shown[which]) } else { String::new() }).replace(&abs, "<scratch>"), || {
            let mut cmd = Command::new(&bin);
            cmd.current_dir(&work).arg("file").arg("extract");
            if keep { cmd.arg("-p"); }
            if single { cmd.arg(&mpq).arg(&names[which]); } else { cmd.arg("-t").arg(outname).arg(&mpq); }
            let o = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("HOME", &work).output().map_err(|e| e.to_string())?;
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            ensure(!err.contains("panicked"), || format!("panicked: {}", clip(&err, 500)))?;
            let mut after = BTreeMap::new(); tree(&root, "", &relout, &mut after);
            for (p, d) in &after { ensure(before.get(p) == Some(d), || format!("{:?} outside the output directory was created or changed", p))?; }
            for p in before.keys() { ensure(after.contains_key(p), || format!("{:?} outside the output directory is gone", p))?; }
            let mut got = BTreeMap::new(); tree(&outdir, "", "", &mut got);
            // expected files, the last of several names with the same destination winning
            let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new(); let mut fuzzy = false;
            let list: Vec<usize> = if single { vec![which] } else { (0..names.len()).collect() };
            for i in list {
                let p = parts(&names[i]);
                if p.is_empty() { continue; }
                if names[i].contains('\\') { fuzzy = true; continue; }
                let t = if keep { p.join("/") } else { p[p.len() - 1].to_string() };
                want.insert(t, contents[i].clone());
            }
            // one name is a directory of another: the later one cannot be written
            let conflict = want.keys().any(|a| want.keys().any(|b| b.starts_with(&format!("{}/", a))));
            if fuzzy || conflict { return Ok(()); }
            for (p, d) in &want { ensure(got.get(p) == Some(&Some(d.clone())), || format!("{:?} not extracted as stored (status {:?}, {})", p, o.status.code(), clip(&err, 300)))?; }
            for (p, d) in &got { if d.is_some() && p != "(listfile)" { ensure(want.contains_key(p), || format!("unexpected file {:?}", p))?; } }
            Ok(())
        });
    }
    let _ = std::fs::remove_dir_all(&root);
}
