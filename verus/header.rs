//@include inc_prelude.rs
//@include inc_le.rs
//@include inc_io.rs
//@include inc_rle.rs
//@include inc_wle.rs
//@include inc_hdr.rs
//@include inc_hdrt.rs
verus! {
impl FormatVersion {
//@extract mopaq/src/header.rs FormatVersion::header_size
//@opts ret=r
//@spec
    ensures r == hsize(*self)
//@end
//@extract mopaq/src/header.rs FormatVersion::from_raw
//@opts ret=r
//@spec
    ensures r == version_of(raw)
//@end
}
impl MpqHeader {
//@extract mopaq/src/header.rs MpqHeader::read
//@opts ret=r
//@subst format_version >= FormatVersion::V2 ==> vp_version_ge(format_version, FormatVersion::V2)
//@subst format_version >= FormatVersion::V3 ==> vp_version_ge(format_version, FormatVersion::V3)
//@subst format_version >= FormatVersion::V4 ==> vp_version_ge(format_version, FormatVersion::V4)
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> header_at(old(reader).bytes(), old(reader).pos(), r->Ok_0),
        !old(reader).faulty() && valid_at(old(reader).bytes(), old(reader).pos()) ==> r is Ok,
//@end
//@extract mopaq/src/header.rs MpqHeader::get_archive_size
//@opts ret=r
//@spec
    ensures r == (if self.archive_size_64 is Some { self.archive_size_64->0 } else { self.archive_size as u64 })
//@end
//@extract mopaq/src/header.rs MpqHeader::get_hash_table_pos
//@opts ret=r
//@spec
    ensures r == (if self.hash_table_pos_hi is Some { self.hash_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + self.hash_table_pos
//@body-start
    proof { lemma_hi32(self.hash_table_pos, if self.hash_table_pos_hi is Some { self.hash_table_pos_hi->0 } else { 0 }); }
//@end
//@extract mopaq/src/header.rs MpqHeader::get_block_table_pos
//@opts ret=r
//@spec
    ensures r == (if self.block_table_pos_hi is Some { self.block_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + self.block_table_pos
//@body-start
    proof { lemma_hi32(self.block_table_pos, if self.block_table_pos_hi is Some { self.block_table_pos_hi->0 } else { 0 }); }
//@end
}
//@extract mopaq/src/header.rs find_header
//@opts ret=r loops=1
//@spec
    requires !old(reader).faulty(), len_ok(old(reader).bytes().len() as int)
    ensures final(reader).bytes() == old(reader).bytes(), !final(reader).faulty(),
        r is Ok ==> exists|o: int| #[trigger] skipped(old(reader).bytes(), o) && found(old(reader).bytes(), o, r->Ok_0),
        r is Err ==> forall|o: int| 0 <= o < old(reader).bytes().len() && o % 512 == 0 && #[trigger] skipped(old(reader).bytes(), o) ==> !offered(old(reader).bytes(), o),
//@loop 0
    invariant
        !reader.faulty(), reader.bytes() == old(reader).bytes(), file_size == reader.bytes().len(), len_ok(file_size as int),
        offset % 512 == 0, offset < file_size + 512, skipped(reader.bytes(), offset as int),
    decreases file_size + 512 - offset
//@loop-start 0
    let ghost vp_d = reader.bytes();
    proof {
        if offset < file_size {
            if step(vp_d, offset as int) == 0 {
                assert forall|j: int| 0 <= j < offset + 512 && j % 512 == 0 implies #[trigger] step(vp_d, j) == 0 by { if j > offset { assert(false) by (nonlinear_arith) requires offset < j < offset + 512, j % 512 == 0, offset % 512 == 0, offset >= 0; } }
            } else {
                assert forall|o: int| 0 <= o < vp_d.len() && o % 512 == 0 && skipped(vp_d, o) implies o <= offset by { if o > offset { assert(step(vp_d, offset as int) == 0); } }
            }
        }
    }
//@end
// ---------- writing ----------
pub struct ArchiveBuilder { pub version: FormatVersion, pub block_size: u16 }
impl ArchiveBuilder {
//@extract mopaq/src/builder.rs ArchiveBuilder::write_header
//@opts ret=r
//@subst self.version as u16 ==> vp_version_as_u16(self.version)
//@spec
    requires 0 <= old(writer).pos(), vnum(self.version) >= 1 || (params.hash_table_pos <= u32::MAX && params.block_table_pos <= u32::MAX)
    ensures r is Ok ==> put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), hdr(self.version, self.block_size, *params)) && (vnum(self.version) == 3 ==> params.v4_data is Some)
//@body-start
    broadcast use lemma_splice2;
    assert(origin(old(writer).bytes(), old(writer).pos()));
//@end
}
fn main() {}
}
