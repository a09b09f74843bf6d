//@include inc_prelude.rs
verus! {
//@extract mopaq/src/compression/algorithms/huffman.rs const:HUFF_ITEM_COUNT
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs const:LINK_ITEM_COUNT
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs const:HUFF_DECOMPRESS_ERROR
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs struct:BitReader
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs struct:HuffmanItem
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs struct:QuickLink
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs struct:HuffmanTree
//@end
// ---------- environment ----------
/// WEIGHT_TABLES[i]; the weights themselves play no part in termination or bounds
pub const WEIGHT_TABLES: [u8; 3] = [0, 1, 2];
#[verifier::external_body] pub fn vp_weights(i: usize) -> (r: [u8; 258]) requires i < 3 { unimplemented!() }
#[verifier::external_body] pub fn vp_links() -> (r: [QuickLink; LINK_ITEM_COUNT]) { unimplemented!() }
/// v.sort_by_key(..): a permutation
#[verifier::external_body] pub fn vp_sort(v: &mut Vec<HuffmanItem>) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]) { unimplemented!() }
/// explode_bytes of the pklib crate
#[verifier::external_body] pub fn explode_bytes(d: &[u8]) -> (r: Result<Vec<u8>>) ensures r is Ok ==> len_ok(r->Ok_0@.len() as int) { unimplemented!() }
// ---------- specification ----------
/// bits not yet consumed
pub open spec fn left(r: BitReader) -> int { 8 * (r.data@.len() - r.position) + r.bit_count }
pub open spec fn reader_ok(r: BitReader) -> bool { r.position <= r.data@.len() && len_ok(r.data@.len() as int) && r.bit_count <= 15 }
/// every link stays inside the pool
pub open spec fn tree_ok(t: HuffmanTree) -> bool { t.items@.len() <= 0x300 && forall|i: int| 0 <= i < t.items@.len() ==> ((#[trigger] t.items@[i]).child_lo is Some ==> t.items@[i].child_lo->0 < t.items@.len()) }
pub open spec fn light(s: Seq<HuffmanItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).weight <= 0xFF && s[i].child_lo is None && s[i].decompressed_value <= 0x101 }
impl<'a> BitReader<'a> {
//@extract mopaq/src/compression/algorithms/huffman.rs BitReader::new
//@opts ret=r
//@spec
    requires len_ok(data@.len() as int)
    ensures reader_ok(r), left(r) == 8 * data@.len(), r.data == data,
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs BitReader::get_bit
//@opts ret=r
//@spec
    requires reader_ok(*old(self))
    ensures reader_ok(*final(self)), final(self).data == old(self).data, r is Ok ==> left(*final(self)) == left(*old(self)) - 1, left(*final(self)) <= left(*old(self)), final(self).position >= old(self).position,
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs BitReader::get_8_bits
//@opts ret=r
//@spec
    requires reader_ok(*old(self))
    ensures reader_ok(*final(self)), final(self).data == old(self).data, r is Ok ==> final(self).position == old(self).position + 1 && r->Ok_0 <= 0xFF, left(*final(self)) <= left(*old(self)), final(self).position >= old(self).position,
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs BitReader::peek_7_bits
//@opts ret=r loops=1
//@spec
    requires reader_ok(*old(self))
    ensures reader_ok(*final(self)), final(self).data == old(self).data, left(*final(self)) == left(*old(self)), r is Ok ==> r->Ok_0 <= 0x7F && final(self).bit_count >= 7, final(self).position >= old(self).position,
//@loop 0
    invariant reader_ok(*self), self.data == old(self).data, left(*self) == left(*old(self)), self.position >= old(self).position,
    decreases self.data@.len() - self.position,
//@loop-after 0
    proof { let b = self.bit_buffer; assert(b & 0x7F <= 0x7F) by (bit_vector); }
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs BitReader::skip_bits
//@opts
//@spec
    requires reader_ok(*old(self)), count <= 7,
    ensures reader_ok(*final(self)), final(self).data == old(self).data, left(*final(self)) <= left(*old(self)), final(self).position >= old(self).position,
    decreases (if count <= old(self).bit_count { 0int } else { 1int }),
//@end
}
impl HuffmanItem {
//@extract mopaq/src/compression/algorithms/huffman.rs HuffmanItem::new
//@opts ret=r
//@spec
    ensures r.weight == weight, r.child_lo is None, r.decompressed_value == value,
//@end
}
impl HuffmanTree {
//@extract mopaq/src/compression/algorithms/huffman.rs HuffmanTree::new
//@opts ret=r
//@subst std::array::from_fn(|_| QuickLink::new()) ==> vp_links()
//@spec
    ensures r.items@.len() == 0,
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs HuffmanTree::build_internal_tree
//@opts ret=r loops=1
//@spec
    requires light(old(self).items@), old(self).items@.len() <= 0x104,
    ensures tree_ok(*final(self)),
//@loop-before 0
    let ghost n = self.items@.len();
//@loop 0
    invariant
        n == old(self).items@.len(), n <= 0x104, 1 <= work_items <= n, self.items@.len() + work_items == 2 * n,
        forall|i: int| 0 <= i < n ==> (#[trigger] self.items@[i]).weight <= 0xFF && self.items@[i].child_lo is None,
        tree_ok(*self),
    decreases work_items,
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs HuffmanTree::build_tree
//@opts ret=r loops=2
//@subst WEIGHT_TABLES[comp_type] ==> vp_weights(comp_type)
//@subst self.items.sort_by_key(|item| item.weight) ==> vp_sort(&mut self.items)
//@spec
    ensures r is Ok ==> tree_ok(*final(self)),
//@loop 0
    invariant light(self.items@), self.items@.len() <= i, vp_s0@.len() == 258,
//@loop 1
    invariant light(vp_s1@), vp_s1@ == self.items@, self.items@.len() <= 0x104,
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs HuffmanTree::decode_one_byte
//@opts ret=r loops=1
//@subst |idx| { ==> |idx: usize| -> (vp_r: usize) requires idx < self.items@.len() && self.items@.len() <= 0x300 {
//@spec
    requires tree_ok(*old(self)), reader_ok(*old(reader)),
    ensures tree_ok(*final(self)), reader_ok(*final(reader)), final(reader).data == old(reader).data, left(*final(reader)) <= left(*old(reader)), final(reader).position >= old(reader).position,
//@loop 0
    invariant tree_ok(*self), reader_ok(*reader), reader.data == old(reader).data, left(*reader) <= left(*old(reader)), reader.position >= old(reader).position,
    decreases left(*reader),
//@end
}
//@extract mopaq/src/compression/algorithms/huffman.rs decompress
//@opts ret=r name=huffman_decompress loops=1
//@spec
    requires len_ok(data@.len() as int), len_ok(expected_size as int),
//@loop 0
    invariant tree_ok(tree), reader_ok(reader), reader.data@ == data@,
    decreases 2 * (data@.len() - reader.position) + (if expected_size > output@.len() { expected_size - output@.len() } else { 0 }),
//@end
//@extract mopaq/src/compression/algorithms/implode.rs decompress
//@opts ret=r name=implode_decompress loops=2
//@subst continue; } } } } ==> } } } }
//@spec
    requires len_ok(data@.len() as int),
    ensures r is Ok ==> len_ok(r->Ok_0@.len() as int),
//@loop 0
    invariant len_ok(data@.len() as int),
//@loop 1
    invariant len_ok(data@.len() as int),
//@end
fn main() {}
}
