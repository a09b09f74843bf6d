verus! {
/// marks where a sequence of writes began (keeps the lemma below from matching every pair of writes)
pub open spec fn origin(d: Seq<u8>, p: int) -> bool { true }
pub broadcast proof fn lemma_splice2(d: Seq<u8>, p: int, a: Seq<u8>, q: int, b: Seq<u8>)
    requires 0 <= p, q == p + a.len()
    ensures #![trigger origin(d, p), splice(splice(d, p, a), q, b)] splice(splice(d, p, a), q, b) == splice(d, p, a + b)
{
    if a.len() == 0 { assert(a + b =~= b); }
    else if b.len() == 0 { assert(a + b =~= a); }
    else { assert(splice(splice(d, p, a), q, b) =~= splice(d, p, a + b)); }
}
pub open spec fn put(d0: Seq<u8>, p0: int, d1: Seq<u8>, p1: int, b: Seq<u8>) -> bool { d1 == splice(d0, p0, b) && p1 == p0 + b.len() }
pub trait WriteLittleEndian: Write {
//@extract mopaq/src/builder.rs WriteLittleEndian::write_u16_le
//@opts ret=r trait
//@spec
    ensures final(self).faulty() == old(self).faulty(), r is Ok ==> put(old(self).bytes(), old(self).pos(), final(self).bytes(), final(self).pos(), le2b(value)),
//@end
//@extract mopaq/src/builder.rs WriteLittleEndian::write_u32_le
//@opts ret=r trait
//@spec
    ensures final(self).faulty() == old(self).faulty(), r is Ok ==> put(old(self).bytes(), old(self).pos(), final(self).bytes(), final(self).pos(), le4b(value)),
//@end
//@extract mopaq/src/builder.rs WriteLittleEndian::write_u64_le
//@opts ret=r trait
//@spec
    ensures final(self).faulty() == old(self).faulty(), r is Ok ==> put(old(self).bytes(), old(self).pos(), final(self).bytes(), final(self).pos(), le8b(value)),
//@end
}
impl<W: Write> WriteLittleEndian for W {}
}
