//@include inc_prelude.rs
//@include inc_io.rs
//@include inc_digest.rs
//@include inc_sig.rs
verus! {
#[derive(Clone, Copy, PartialEq, Eq)]
//@extract mopaq/src/header.rs enum:FormatVersion
//@end
//@extract mopaq/src/header.rs struct:MpqHeader
//@end
//@extract mopaq/src/header.rs struct:MpqHeaderV4Data
//@end
#[derive(PartialEq, Eq, Structural)]
//@extract mopaq/src/archive.rs enum:SignatureStatus
//@end
//@extract mopaq/src/archive.rs struct:FileInfo
//@end
//@extract mopaq/src/crypto/signature.rs const:STRONG_SIGNATURE_SIZE
//@end
pub open spec fn small(n: int) -> bool { n <= 0x00FF_FFFF_FFFF_FFFF }
pub open spec fn sat(a: u64, b: u64) -> u64 { if a + b > u64::MAX { u64::MAX } else { (a + b) as u64 } }
pub open spec fn asize(h: MpqHeader) -> u64 { if h.archive_size_64 is Some { h.archive_size_64->0 } else { h.archive_size as u64 } }
impl MpqHeader {
//@extract mopaq/src/header.rs MpqHeader::get_archive_size
//@opts ret=r
//@spec
    ensures r == asize(*self)
//@end
}
// ---------- the functions below Archive (contracts proved in units sig and digest) ----------
impl SignatureInfo {
    #[verifier::external_body]
    pub fn new_weak(archive_start: u64, archive_size: u64, signature_file_pos: u64, signature_file_size: u64, signature_data: Vec<u8>) -> (r: SignatureInfo)
        ensures r.begin_mpq_data == archive_start, r.end_mpq_data == sat(archive_start, archive_size), r.begin_exclude == signature_file_pos, r.end_exclude == sat(signature_file_pos, signature_file_size),
            r.begin_exclude <= r.end_exclude, r.signature@ == signature_data@,
    { unimplemented!() }
}
#[verifier::external_body] pub fn parse_weak_signature(data: &[u8]) -> (r: Result<Vec<u8>>)
    ensures r is Ok <==> data@.len() >= 72 && !zeros(data@.subrange(8, 72)), r is Ok ==> r->Ok_0@ == data@.subrange(8, 72), { unimplemented!() }
#[verifier::external_body] pub fn parse_strong_signature(data: &[u8]) -> (r: Result<Vec<u8>>)
    ensures r is Ok <==> data@.len() >= 260 && data@.subrange(0, 4) == seq![0x4Eu8, 0x47, 0x49, 0x53] && !zeros(data@.subrange(4, 260)), r is Ok ==> r->Ok_0@ == data@.subrange(4, 260), { unimplemented!() }
#[verifier::external_body] pub fn verify_weak_signature_stormlib<R: Read + Seek>(reader: &mut R, signature: &[u8], signature_info: &SignatureInfo) -> (r: Result<bool>)
    requires len_ok(old(reader).bytes().len() as int), signature_info.begin_exclude <= signature_info.end_exclude,
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        ({ let h = md5(signed_range(old(reader).bytes(), signature_info.begin_mpq_data as int, signature_info.end_mpq_data as int, signature_info.begin_exclude as int, signature_info.end_exclude as int));
        &&& r is Ok ==> r->Ok_0 == is_weak_block(padded(decoded(signature@, weak_n()), 64), h)
        &&& !old(reader).faulty() && is_weak_block(padded(decoded(signature@, weak_n()), 64), h) ==> r is Ok }),
{ unimplemented!() }
#[verifier::external_body] pub fn verify_strong_signature<R: Read>(reader: &mut R, signature: &[u8], archive_size: u64) -> (r: Result<bool>)
    requires len_ok(old(reader).bytes().len() as int), 0 <= old(reader).pos(),
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> r->Ok_0 == is_strong_block(decoded(signature@, strong_n()), sha1(ahead(old(reader).bytes(), old(reader).pos(), archive_size as int))), !old(reader).faulty() ==> r is Ok,
{ unimplemented!() }
pub mod crypto { pub use super::*; }
/// environment: the length of the file behind the reader
#[verifier::external_body] pub fn vp_file_len<R: Read>(r: &R) -> (n: Result<u64>) ensures n is Ok ==> n->Ok_0 == r.bytes().len(), !r.faulty() ==> n is Ok { unimplemented!() }
// ---------- specification: what the archive's signature status says ----------
pub struct Archive<R> { pub reader: R, pub header: MpqHeader, pub archive_offset: u64 }
/// a file's place in the archive, and the bytes reading it gives (units fread and tables; functions of archive and name while the medium does not fault)
pub struct Loc { pub pos: u64, pub csize: u64 }
pub uninterp spec fn locate<R>(a: Archive<R>, n: Seq<u8>) -> Result<Option<Loc>>;
pub uninterp spec fn content<R>(a: Archive<R>, n: Seq<u8>) -> Result<Seq<u8>>;
pub open spec fn same<R: VpMedium>(a: Archive<R>, b: Archive<R>) -> bool { a.reader.bytes() == b.reader.bytes() && a.reader.faulty() == b.reader.faulty() && a.header == b.header && a.archive_offset == b.archive_offset }
/// where an appended signature would start
pub open spec fn aend<R>(a: Archive<R>) -> int { sat(a.archive_offset, asize(a.header)) as int }
pub open spec fn strong_there<R: VpMedium>(a: Archive<R>) -> bool {
    let d = a.reader.bytes(); let e = aend(a);
    e + 260 <= d.len() && d.subrange(e, e + 4) == seq![0x4Eu8, 0x47, 0x49, 0x53] && !zeros(d.subrange(e + 4, e + 260))
}
pub open spec fn strong_good<R: VpMedium>(a: Archive<R>) -> bool {
    let d = a.reader.bytes(); let e = aend(a);
    is_strong_block(decoded(d.subrange(e + 4, e + 260), strong_n()), sha1(ahead(d, a.archive_offset as int, e - a.archive_offset)))
}
pub open spec fn strong_status<R: VpMedium>(a: Archive<R>) -> SignatureStatus { if !strong_there(a) { SignatureStatus::None } else if strong_good(a) { SignatureStatus::StrongValid } else { SignatureStatus::StrongInvalid } }
/// the digest over the archive with the signature file's own bytes zeroed
pub open spec fn weak_good<R: VpMedium>(a: Archive<R>, l: Loc, s: Seq<u8>) -> bool {
    is_weak_block(padded(decoded(s.subrange(8, 72), weak_n()), 64), md5(signed_range(a.reader.bytes(), a.archive_offset as int, sat(a.archive_offset, a.header.archive_size as u64) as int, l.pos as int, sat(l.pos, l.csize) as int)))
}
pub open spec fn weak_form(s: Seq<u8>) -> bool { s.len() >= 72 && !zeros(s.subrange(8, 72)) }
pub open spec fn weak_status<R: VpMedium>(a: Archive<R>) -> Result<SignatureStatus> {
    let l = locate(a, sname()); let s = content(a, sname());
    if l is Err { Err(l->Err_0) } else if l->Ok_0 is None { Ok(SignatureStatus::None) } else if s is Err { Err(s->Err_0) }
    else if !weak_form(s->Ok_0) { Ok(SignatureStatus::None) } else if weak_good(a, l->Ok_0->0, s->Ok_0) { Ok(SignatureStatus::WeakValid) } else { Ok(SignatureStatus::WeakInvalid) }
}
pub open spec fn sname() -> Seq<u8> { "(signature)".spec_bytes() }
/// the same result, whatever the error says
pub open spec fn agree(a: Result<SignatureStatus>, b: Result<SignatureStatus>) -> bool { a is Ok == b is Ok && (a is Ok ==> a->Ok_0 == b->Ok_0) }
/// two archives that differ only in the reader's position locate and contain the same
pub axiom fn ax_same<R: VpMedium>(a: Archive<R>, b: Archive<R>) requires same(a, b) ensures forall|n: Seq<u8>| #[trigger] locate(a, n) == locate(b, n), forall|n: Seq<u8>| #[trigger] content(a, n) == content(b, n);
impl<R: Read + Seek> Archive<R> {
    #[verifier::external_body]
    pub fn find_file(&self, filename: &str) -> (r: Result<Option<FileInfo>>)
        ensures ({ let c = locate(*self, filename.spec_bytes()); r is Ok == c is Ok && (r is Ok ==> (r->Ok_0 is Some == c->Ok_0 is Some) && (r->Ok_0 is Some ==> (r->Ok_0->0).file_pos == (c->Ok_0->0).pos && (r->Ok_0->0).compressed_size == (c->Ok_0->0).csize)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_file(&mut self, name: &str) -> (r: Result<Vec<u8>>)
        ensures same(*old(self), *final(self)), r is Ok ==> content(*old(self), name.spec_bytes()) is Ok && r->Ok_0@ == content(*old(self), name.spec_bytes())->Ok_0, !old(self).reader.faulty() ==> r is Ok == content(*old(self), name.spec_bytes()) is Ok,
    { unimplemented!() }
//@extract mopaq/src/archive.rs Archive::verify_weak_signature
//@opts ret=r
//@subst crate::crypto:: ==> crypto::
//@subst weak_sig.clone() ==> vp_to_vec(&weak_sig)
//@spec
    requires small(old(self).reader.bytes().len() as int),
    ensures same(*old(self), *final(self)),
        r is Ok && r->Ok_0 == SignatureStatus::WeakValid ==> weak_status(*old(self)) == Ok::<SignatureStatus, Error>(SignatureStatus::WeakValid),
        r is Ok ==> r->Ok_0 == SignatureStatus::None || r->Ok_0 == SignatureStatus::WeakValid || r->Ok_0 == SignatureStatus::WeakInvalid,
        !old(self).reader.faulty() ==> agree(r, weak_status(*old(self))),
//@end
//@extract mopaq/src/archive.rs Archive::verify_strong_signature
//@opts ret=r
//@subst use crate::crypto::{parse_strong_signature, verify_strong_signature, STRONG_SIGNATURE_SIZE,}; ==>
//@subst self.reader.get_ref().metadata()?.len() ==> vp_file_len(&self.reader)?
//@spec
    requires small(old(self).reader.bytes().len() as int),
    ensures same(*old(self), *final(self)),
        r is Ok && r->Ok_0 == SignatureStatus::StrongValid ==> strong_there(*old(self)) && strong_good(*old(self)),
        r is Ok ==> r->Ok_0 == SignatureStatus::None || r->Ok_0 == SignatureStatus::StrongValid || r->Ok_0 == SignatureStatus::StrongInvalid,
        !old(self).reader.faulty() ==> r is Ok && r->Ok_0 == strong_status(*old(self)),
//@body-start
    let ghost d = self.reader.bytes(); let ghost e = aend(*self);
    proof { if e + 260 <= d.len() { let s = d.subrange(e, e + 260); assert(s.subrange(0, 4) =~= d.subrange(e, e + 4)); assert(s.subrange(4, 260) =~= d.subrange(e + 4, e + 260)); } }
//@end
//@extract mopaq/src/archive.rs Archive::verify_signature
//@opts ret=r
//@spec
    requires small(old(self).reader.bytes().len() as int),
    ensures same(*old(self), *final(self)),
        r is Ok && r->Ok_0 == SignatureStatus::StrongValid ==> strong_there(*old(self)) && strong_good(*old(self)),
        r is Ok && r->Ok_0 == SignatureStatus::WeakValid ==> weak_status(*old(self)) == Ok::<SignatureStatus, Error>(SignatureStatus::WeakValid),
        !old(self).reader.faulty() ==> agree(r, if strong_there(*old(self)) { Ok(strong_status(*old(self))) } else { weak_status(*old(self)) }),
//@body-start
    proof { let a0 = *self; assert forall|b: Archive<R>| #![trigger same(a0, b)] same(a0, b) implies weak_status(b) == weak_status(a0) by { ax_same(a0, b); } }
//@end
}
fn main() {}
}
