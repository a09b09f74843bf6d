verus! {
// ---------- environment: strings (assumed contracts of std; a string is its sequence of characters) ----------
pub uninterp spec fn is_ws(c: char) -> bool;
/// std's decoding of bytes to text, invalid sequences replaced
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn ax_utf8(s: Seq<char>) ensures text_of(#[trigger] utf8(s)) == s;
/// the byte position of character i
pub uninterp spec fn byte_at(s: Seq<char>, i: int) -> int;
pub broadcast axiom fn ax_byte_at(s: Seq<char>, i: int, j: int) requires 0 <= i <= s.len(), 0 <= j <= s.len() ensures #[trigger] byte_at(s, i) == #[trigger] byte_at(s, j) ==> i == j;
#[verifier::external_body] pub fn vp_from_utf8<'a>(b: &'a [u8]) -> (r: core::result::Result<&'a str, ()>) ensures r is Ok ==> r->Ok_0@ == text_of(b@) { unimplemented!() }
#[verifier::external_body] pub fn vp_from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == text_of(b@) { unimplemented!() }
#[verifier::external_body] pub fn vp_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vp_as_str<'a>(s: &'a String) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vp_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vp_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body] pub fn vp_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] pub fn vp_into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body] pub fn vp_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trim(s@) { unimplemented!() }
#[verifier::external_body] pub fn vp_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn vp_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
/// s.find(c): the byte position of the first c
#[verifier::external_body] pub fn vp_find(s: &str, c: char) -> (r: Option<usize>) ensures r is Some == (first(s@, c) < s@.len()), r is Some ==> r->0 == byte_at(s@, first(s@, c)) { unimplemented!() }
/// &s[..pos], which panics unless pos is a character boundary
#[verifier::external_body] pub fn vp_prefix<'a>(s: &'a str, pos: usize) -> (r: &'a str)
    requires exists|i: int| 0 <= i <= s@.len() && #[trigger] byte_at(s@, i) == pos
    ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] byte_at(s@, i) == pos ==> r@ == s@.take(i) { unimplemented!() }
#[verifier::external_body] pub fn vp_lines<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == lines(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines(s@)[i] { unimplemented!() }
pub struct PathBuf { pub vp: u8 }
pub uninterp spec fn file_content(p: PathBuf) -> Seq<u8>;
#[verifier::external_body] pub fn vp_fs_read(p: &PathBuf) -> (r: Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == file_content(*p) { unimplemented!() }
// ---------- specification ----------
/// the index of the first c, or the length
pub open spec fn first(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + first(s.skip(1), c) } }
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s)) }
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
/// str::lines
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let i = first(s, '\n');
    if s.len() == 0 { Seq::empty() } else if i < 0 || i >= s.len() { seq![s] } else { seq![strip_cr(s.take(i))] + lines(s.skip(i + 1)) }
}
/// the name on one line: trimmed, comments skipped, cut at the first semicolon and trimmed again
pub open spec fn line_name(l: Seq<char>) -> Option<Seq<char>> {
    let t = trim(l); let n = if first(t, ';') < t.len() { trim(t.take(first(t, ';'))) } else { t };
    if t.len() == 0 || t[0] == ';' || t[0] == '#' || n.len() == 0 { None } else { Some(n) }
}
/// the names on the first k lines
pub open spec fn names_of(l: Seq<Seq<char>>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::empty() } else { let p = names_of(l, k - 1); if line_name(l[k - 1]) is Some { p.push(line_name(l[k - 1])->0) } else { p } } }
pub open spec fn parsed(t: Seq<char>) -> Seq<Seq<char>> { names_of(lines(t), lines(t).len() as int) }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn list_name() -> Seq<char> { "(listfile)"@ }
pub open spec fn crlf() -> Seq<char> { seq!['\r', '\n'] }
pub open spec fn joined(n: Seq<Seq<char>>) -> Seq<char> decreases n.len() { if n.len() == 0 { Seq::empty() } else { joined(n.drop_last()) + n.last() + crlf() } }
pub open spec fn generated(n: Seq<Seq<char>>) -> Seq<char> { joined(n) + (list_name() + crlf()) }
pub proof fn lemma_list_literal() ensures "(listfile)\r\n"@ == list_name() + crlf() { reveal_strlit("(listfile)\r\n"); reveal_strlit("(listfile)"); assert("(listfile)\r\n"@ =~= list_name() + crlf()); }
pub proof fn lemma_first(s: Seq<char>, c: char)
    ensures 0 <= first(s, c) <= s.len(), first(s, c) < s.len() ==> s[first(s, c)] == c, forall|i: int| 0 <= i < first(s, c) ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        let t = s.skip(1); lemma_first(t, c);
        assert forall|i: int| 0 <= i < first(s, c) implies s[i] != c by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}
/// blanks are not ASCII letters or parentheses
pub axiom fn ax_ws() ensures !is_ws('('), !is_ws(')');
}
