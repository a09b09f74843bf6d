//@include inc_prelude.rs
//@include inc_io.rs
//@include inc_digest.rs
verus! {
#[derive(Clone, Copy, PartialEq, Eq)]
//@extract mopaq/src/header.rs enum:FormatVersion
//@end
//@extract mopaq/src/header.rs struct:MpqHeader
//@end
//@extract mopaq/src/header.rs struct:MpqHeaderV4Data
//@end
//@extract mopaq/src/archive.rs struct:Md5Status
//@end
pub open spec fn hsize(v: FormatVersion) -> int { match v { FormatVersion::V1 => 32, FormatVersion::V2 => 44, FormatVersion::V3 => 68, FormatVersion::V4 => 208 } }
impl FormatVersion {
//@extract mopaq/src/header.rs FormatVersion::header_size
//@opts ret=r
//@spec
    ensures r == hsize(*self)
//@end
}
pub proof fn lemma_hi32(lo: u32, hi: u16) ensures ((hi as u64) << 32) | (lo as u64) == hi * 0x1_0000_0000 + lo
{ assert(((hi as u64) << 32) | (lo as u64) == (hi as u64) * 0x1_0000_0000 + (lo as u64)) by (bit_vector); }
pub open spec fn hash_pos(h: MpqHeader) -> int { (if h.hash_table_pos_hi is Some { h.hash_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + h.hash_table_pos }
pub open spec fn block_pos(h: MpqHeader) -> int { (if h.block_table_pos_hi is Some { h.block_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + h.block_table_pos }
impl MpqHeader {
//@extract mopaq/src/header.rs MpqHeader::get_hash_table_pos
//@opts ret=r
//@spec
    ensures r == hash_pos(*self)
//@body-start
    proof { lemma_hi32(self.hash_table_pos, if self.hash_table_pos_hi is Some { self.hash_table_pos_hi->0 } else { 0 }); }
//@end
//@extract mopaq/src/header.rs MpqHeader::get_block_table_pos
//@opts ret=r
//@spec
    ensures r == block_pos(*self)
//@body-start
    proof { lemma_hi32(self.block_table_pos, if self.block_table_pos_hi is Some { self.block_table_pos_hi->0 } else { 0 }); }
//@end
}
/// the bytes [p, p + n) are there
pub open spec fn there(d: Seq<u8>, p: int, n: int) -> bool { 0 <= p && p + n <= d.len() }
pub open spec fn sat(a: u64, b: u64) -> int { if a + b > u64::MAX { u64::MAX as int } else { a + b } }
//@extract mopaq/src/tables/common.rs read_bytes
//@opts ret=r
//@subst reader.take(len).read_to_end(&mut data)? ==> vp_take_read_to_end(reader, len, &mut data)?
//@subst std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into() ==> vp_error()
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok && len > 0 ==> there(old(reader).bytes(), old(reader).pos(), len as int),
        r is Ok ==> r->Ok_0@.len() == len && r->Ok_0@ == old(reader).bytes().subrange(old(reader).pos(), old(reader).pos() + len) && final(reader).pos() == old(reader).pos() + len,
        !old(reader).faulty() && there(old(reader).bytes(), old(reader).pos(), len as int) ==> r is Ok,
//@before-tail
    proof { assert(Seq::<u8>::empty() + reader.bytes().subrange(reader.pos() - data@.len(), reader.pos()) =~= reader.bytes().subrange(reader.pos() - data@.len(), reader.pos())); }
//@end
// ---------- specification: what a digest status says ----------
/// the table at `at` of n bytes is intact
pub open spec fn intact(d: Seq<u8>, off: u64, at: u64, n: u64, digest: Seq<u8>) -> bool { n == 0 || (there(d, sat(off, at), n as int) && md5(d.subrange(sat(off, at), sat(off, at) + n)) == digest) }
pub open spec fn readable(d: Seq<u8>, off: u64, at: u64, n: u64) -> bool { n == 0 || there(d, sat(off, at), n as int) }
pub open spec fn at_opt(p: Option<u64>) -> u64 { if p is Some { p->0 } else { 0 } }
pub open spec fn status_ok(d: Seq<u8>, off: u64, h: MpqHeader, v: MpqHeaderV4Data, s: Md5Status) -> bool {
    &&& s.hash_table_valid == (h.hash_table_size == 0 || intact(d, off, hash_pos(h) as u64, v.hash_table_size_64, v.md5_hash_table@))
    &&& s.block_table_valid == (h.block_table_size == 0 || intact(d, off, block_pos(h) as u64, v.block_table_size_64, v.md5_block_table@))
    &&& s.hi_block_table_valid == (at_opt(h.hi_block_table_pos) == 0 || intact(d, off, at_opt(h.hi_block_table_pos), v.hi_block_table_size_64, v.md5_hi_block_table@))
    &&& s.het_table_valid == (at_opt(h.het_table_pos) == 0 || intact(d, off, at_opt(h.het_table_pos), v.het_table_size_64, v.md5_het_table@))
    &&& s.bet_table_valid == (at_opt(h.bet_table_pos) == 0 || intact(d, off, at_opt(h.bet_table_pos), v.bet_table_size_64, v.md5_bet_table@))
    &&& s.header_valid == (md5(d.subrange(off as int, off + 192)) == v.md5_mpq_header@)
}
/// everything the digests cover can be read
pub open spec fn all_there(d: Seq<u8>, off: u64, h: MpqHeader, v: MpqHeaderV4Data) -> bool {
    &&& there(d, off as int, 192)
    &&& h.hash_table_size == 0 || readable(d, off, hash_pos(h) as u64, v.hash_table_size_64)
    &&& h.block_table_size == 0 || readable(d, off, block_pos(h) as u64, v.block_table_size_64)
    &&& at_opt(h.hi_block_table_pos) == 0 || readable(d, off, at_opt(h.hi_block_table_pos), v.hi_block_table_size_64)
    &&& at_opt(h.het_table_pos) == 0 || readable(d, off, at_opt(h.het_table_pos), v.het_table_size_64)
    &&& at_opt(h.bet_table_pos) == 0 || readable(d, off, at_opt(h.bet_table_pos), v.bet_table_size_64)
}
//@extract mopaq/src/archive.rs Archive::validate_v4_md5_checksums@validate_table_md5
//@generics <R: Read + Seek>
//@params vp_reader: &mut R, vp_off: u64
//@opts ret=r
//@subst &mut self.reader ==> vp_reader
//@subst self.reader ==> vp_reader
//@subst self.archive_offset ==> vp_off
//@subst hasher.finalize().into() ==> hasher.vp_finalize()
//@subst actual_md5 == *expected ==> vp_slice_eq(&actual_md5, expected)
//@spec
    ensures final(vp_reader).bytes() == old(vp_reader).bytes(), final(vp_reader).faulty() == old(vp_reader).faulty(),
        r is Ok ==> r->Ok_0 == intact(old(vp_reader).bytes(), vp_off, offset, size, expected@),
        !old(vp_reader).faulty() && readable(old(vp_reader).bytes(), vp_off, offset, size) ==> r is Ok,
//@before-tail
    proof { assert(Seq::<u8>::empty() + table_data@ =~= table_data@); }
//@end
pub struct Archive<R> { pub reader: R, pub header: MpqHeader, pub archive_offset: u64 }
impl<R: Read + Seek> Archive<R> {
//@extract mopaq/src/archive.rs Archive::validate_v4_md5_checksums
//@opts ret=r drop=validate_table_md5
//@subst use md5::{Digest, Md5}; ==>
//@subst validate_table_md5( ==> validate_table_md5(&mut self.reader, self.archive_offset,
//@subst hasher.finalize().into() ==> hasher.vp_finalize()
//@subst actual_md5 == v4_data.md5_mpq_header ==> vp_slice_eq(&actual_md5, &v4_data.md5_mpq_header)
//@spec
    ensures final(self).reader.bytes() == old(self).reader.bytes(), final(self).header == old(self).header, final(self).archive_offset == old(self).archive_offset,
        old(self).header.v4_data is None ==> r is Ok && r->Ok_0 is None,
        r is Ok && old(self).header.v4_data is Some ==> r->Ok_0 is Some && status_ok(old(self).reader.bytes(), old(self).archive_offset, old(self).header, old(self).header.v4_data->0, r->Ok_0->0),
        !old(self).reader.faulty() && old(self).header.v4_data is Some && all_there(old(self).reader.bytes(), old(self).archive_offset, old(self).header, old(self).header.v4_data->0) ==> r is Ok,
//@body-start
    proof { assert forall|s: Seq<u8>| #![trigger Seq::<u8>::empty() + s] Seq::<u8>::empty() + s == s by { assert(Seq::<u8>::empty() + s =~= s); } }
//@end
}
// ---------- the writer's side ----------
pub struct ArchiveBuilder { pub version: FormatVersion }
impl ArchiveBuilder {
//@extract mopaq/src/builder.rs ArchiveBuilder::calculate_md5
//@opts ret=r
//@subst hasher.finalize().into() ==> hasher.vp_finalize()
//@spec
    ensures r@ == md5(data@)
//@body-start
    proof { assert(Seq::<u8>::empty() + data@ =~= data@); }
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::finalize_v4_header_md5
//@opts ret=r
//@spec
    requires self.version == FormatVersion::V4
    ensures r is Ok ==> old(writer).bytes().len() >= 192 && final(writer).bytes() == splice(old(writer).bytes(), 192, md5(old(writer).bytes().subrange(0, 192))) && md5(old(writer).bytes().subrange(0, 192)).len() == 16
//@end
}
/// the digest the writer leaves in the header is the one the reader expects
pub proof fn thm_header_digest(d0: Seq<u8>, d1: Seq<u8>)
    requires d0.len() >= 192, d1 == splice(d0, 192, md5(d0.subrange(0, 192)))
    ensures d1.subrange(192, 192 + (md5(d0.subrange(0, 192)).len() as int)) == md5(d1.subrange(0, 192))
{ assert(d1.subrange(0, 192) =~= d0.subrange(0, 192)); assert(d1.subrange(192, 192 + (md5(d0.subrange(0, 192)).len() as int)) =~= md5(d0.subrange(0, 192))); }
fn main() {}
}
