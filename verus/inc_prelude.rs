#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
global size_of usize == 8;
/// Language guarantee: no allocation exceeds isize::MAX bytes (precondition of the length arithmetic).
pub open spec fn len_ok(n: int) -> bool { n <= 0x7FFF_FFFF_FFFF_FFFF }

// ---------- environment of the extracted code (not code of the repository) ----------
/// The repository's error type, message dropped: only the fact that an error is returned is kept, and whether it is FileNotFound (vp == 1).
pub struct Error { pub vp: u8 }
pub type Result<T> = core::result::Result<T, Error>;
pub fn vp_error() -> Error { Error { vp: 0 } }
/// the one error callers tell apart: the name is not in the archive
pub fn vp_not_found() -> (r: Error) ensures r.vp == 1 { Error { vp: 1 } }
pub fn vp_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b }
{ if a <= b { a } else { b } }

/// the number of windows of length w
pub fn vp_windows(n: usize, w: usize) -> (r: usize) requires w > 0 ensures r == if n >= w { n - w + 1 } else { 0 } { if n >= w { n - w + 1 } else { 0 } }
/// the bounds check of s[a..b]
pub fn vp_in_range(n: usize, a: usize, b: usize) requires a <= b <= n {}
/// environment: comparison of byte slices
pub fn vp_slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    for i in 0..a.len() invariant a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j]
    { if a[i] != b[i] { return false; } }
    proof { assert(a@ =~= b@); }
    true
}
/// environment: s.to_vec()
pub fn vp_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@
{
    let mut v = Vec::new();
    for i in 0..s.len() invariant v@ == s@.take(i as int)
    { v.push(s[i]); proof { assert(s@.take(i + 1) =~= s@.take(i as int).push(s@[i as int])); } }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    v
}
/// environment: s.iter().rev().copied().collect()
pub fn vp_rev_collect(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@.reverse()
{
    let mut v = Vec::new();
    let n = s.len();
    for i in 0..n invariant n == s@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == s@[n - 1 - j]
    { v.push(s[n - 1 - i]); }
    proof { assert(v@ =~= s@.reverse()); }
    v
}
/// environment: &mut s[a..b]
pub fn vp_sub_mut<T>(s: &mut [T], a: usize, b: usize) -> (r: &mut [T])
    requires a <= b <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == r@.len() ==> final(s)@ == old(s)@.subrange(0, a as int) + final(r)@ + old(s)@.subrange(b as int, old(s)@.len() as int)
{ &mut s[a..b] }
}
