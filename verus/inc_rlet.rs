verus! {
/// the next n bytes of the medium at the old position, and the cursor moved behind them
pub open spec fn took(p0: int, p1: int, d: Seq<u8>, n: int) -> bool { 0 <= p0 && p0 + n <= d.len() && p1 == p0 + n }
pub trait ReadLittleEndian: Read {
//@extract mopaq/src/tables/common.rs ReadLittleEndian::read_u16_le
//@opts ret=r trait
//@spec
    ensures final(self).bytes() == old(self).bytes(), final(self).faulty() == old(self).faulty(),
        r is Ok ==> took(old(self).pos(), final(self).pos(), old(self).bytes(), 2) && r->Ok_0 == le2(old(self).bytes().subrange(old(self).pos(), old(self).pos() + 2)),
        !old(self).faulty() && 0 <= old(self).pos() && old(self).pos() + 2 <= old(self).bytes().len() ==> r is Ok,
//@end
//@extract mopaq/src/tables/common.rs ReadLittleEndian::read_u32_le
//@opts ret=r trait
//@spec
    ensures final(self).bytes() == old(self).bytes(), final(self).faulty() == old(self).faulty(),
        r is Ok ==> took(old(self).pos(), final(self).pos(), old(self).bytes(), 4) && r->Ok_0 == le4(old(self).bytes().subrange(old(self).pos(), old(self).pos() + 4)),
        !old(self).faulty() && 0 <= old(self).pos() && old(self).pos() + 4 <= old(self).bytes().len() ==> r is Ok,
//@end
//@extract mopaq/src/tables/common.rs ReadLittleEndian::read_u64_le
//@opts ret=r trait
//@spec
    ensures final(self).bytes() == old(self).bytes(), final(self).faulty() == old(self).faulty(),
        r is Ok ==> took(old(self).pos(), final(self).pos(), old(self).bytes(), 8) && r->Ok_0 == le8(old(self).bytes().subrange(old(self).pos(), old(self).pos() + 8)),
        !old(self).faulty() && 0 <= old(self).pos() && old(self).pos() + 8 <= old(self).bytes().len() ==> r is Ok,
//@end
}
impl<R: Read> ReadLittleEndian for R {}
}
